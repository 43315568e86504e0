#!/bin/bash
# builds the analyzer (offline, vendored dependencies)
. "$(dirname "$0")/env.sh"
build_an
