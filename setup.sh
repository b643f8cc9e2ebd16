#!/bin/bash
# Builds every variant of the monitors, offline, from the committed files.
. "$(dirname "$0")/env.sh"
build harness "" && build harness -log --features logging && build harness3d "" && build harness3d -log --features logging && all_variants && all_watched
