#!/bin/bash
# Usage: run.sh <property> [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/mc/target/release/mc" "$1" "${2:-quick}"
