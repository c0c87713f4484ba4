#!/bin/bash
# Builds the simulator once, which fills the build cache the checks use.
exec "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/run.sh" build
