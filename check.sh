#!/bin/bash
# check.sh <property> [options]: builds, then runs the property's check.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/target/debug/ftmlsim" "$@" --root "$here"
