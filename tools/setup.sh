#!/bin/bash
# Nothing needs building beforehand (every check builds from /repo's current tree); this only shows
# that the tools are there.
set -e
cargo kani --version
verus --version | head -2
python3 -c 'import json'
