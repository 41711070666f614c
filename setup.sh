#!/bin/bash
# Compiles the kernels of /repo's current tree once into the cache used by the checks.
cd "$(dirname "${BASH_SOURCE[0]}")" && exec ./check.sh --warm
