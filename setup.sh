#!/bin/sh
# builds the extractor and the crate's dependencies, and fills the dump cache
d=$(cd "$(dirname "$0")" && pwd)
cd "$d/engine" && exec python3-vt -c 'import mir; c = mir.extract(); print(len(c.fns), "functions extracted")'
