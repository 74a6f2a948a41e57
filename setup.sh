#!/bin/bash
# Builds the model checker from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")"
bash ./build.sh
