#!/bin/bash
# Builds both simulators offline from the committed files and /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
for P in C01 C10; do . tools/build.sh || exit 2; done
