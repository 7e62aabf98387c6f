#!/bin/bash
# run in /repo after the build; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 /usr/lib/jvm/java-17-openjdk-amd64/bin/java -cp collections/build/classes/java/main "$here/Demo.java"
