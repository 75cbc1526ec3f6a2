#!/bin/bash
# builds the extractor and checks that it reads /repo; every check does this by itself where needed
cd "$(dirname "$0")/.." && python3-vt mirvc/check.py --setup
