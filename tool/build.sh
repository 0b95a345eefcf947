#!/bin/bash
# Compiles the analyser into /verif/build (git-ignored) when it is missing or older than its sources.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
EXP="--add-exports jdk.compiler/com.sun.tools.javac.tree=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.code=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.api=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.util=ALL-UNNAMED"
JH="${WIREFX_JAVA_HOME:-/usr/lib/jvm/java-17-openjdk-amd64}"
sum="$(cat "$here"/src/wirefx/*.java | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$out/.stamp" 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp="$(mktemp -d "$here/../build.XXXXXX")"
"$JH/bin/javac" -nowarn -XDignore.symbol.file $EXP -encoding UTF-8 -d "$tmp" "$here"/src/wirefx/*.java
echo "$sum" > "$tmp/.stamp"
rm -rf "$(cd "$here/.." && pwd)/build"
mv "$tmp" "$(cd "$here/.." && pwd)/build"
