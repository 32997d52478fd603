#!/bin/bash
# Builds the simulator once so that each check only has to rebuild what changed.
cd "$(dirname "$0")/sim" && cargo build --offline --quiet --profile dev && cargo build --offline --quiet --profile bare
