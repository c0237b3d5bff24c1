#!/bin/bash
# builds the extractor and the native harness from the committed files (offline)
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "lib")
import driver
with driver.Lock():
    driver.build_vx()
    b, e = driver.build_replay("/repo")
if b is None: print(e); sys.exit(1)
print("built")'
