#!/bin/bash
# run.sh ARGS...: runs the analyser on $REPO (default /repo)
here="$(cd "$(dirname "$0")" && pwd)"
EXP="--add-exports jdk.compiler/com.sun.tools.javac.tree=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.code=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.api=ALL-UNNAMED --add-exports jdk.compiler/com.sun.tools.javac.util=ALL-UNNAMED"
JH="${WIREFX_JAVA_HOME:-/usr/lib/jvm/java-17-openjdk-amd64}"
"$here/build.sh" || exit 3
cp=""
for n in netty-common netty-buffer; do
  j="$(ls /root/.gradle/caches/modules-2/files-2.1/io.netty/$n/4.1.100.Final/*/$n-4.1.100.Final.jar 2>/dev/null | head -1)"
  [ -n "$j" ] || j="$(find /root/.gradle /root/.m2 /opt -name "$n-4*.jar" 2>/dev/null | head -1)"
  cp="$cp:$j"
done
exec "$JH/bin/java" -Xss512m -Xmx4g $EXP -Dwirefx.home="$here/.." ${WIREFX_ONLY:+-Dwirefx.only=$WIREFX_ONLY} -Dwirefx.cp="${cp#:}" -cp "$here/../build" wirefx.Main "${REPO:-/repo}" "$@"
